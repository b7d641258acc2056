"""Threads interleaved line by line, following a schedule which is part of the case."""
import os
import sys
import threading

from hypothesis import strategies as st

from vlib import gen
from vlib.harness import HarnessError

STUCK = 0.2  # seconds without a line before the next thread goes on too
BLOCKED = 8  # seconds without a line of any thread before giving up


class Blocked(Exception):
    pass


@st.composite
def schedules(draw):
    n = draw(gen.pick([10, 30, 80, 3]))
    return draw(st.lists(gen.pick([20, 5, 1, 60, 150, 400, 2, 12, 1000]), min_size=n // 2,
                         max_size=n))


class Interleave:
    """Runs functions in threads, one at a time, switching at lines of the package.

    `schedule` is a list of numbers of lines: the running thread executes that many lines of the
    package (its own, not those of the libraries it uses), then the next thread which is not
    finished goes on. `fine`: of bytecode instructions instead of lines. After the schedule every
    thread runs to its end, in order. A thread which waits for another (for a lock, say) is
    noticed and the next one goes on meanwhile.
    """

    def __init__(self, functions, schedule, folder, fine=False):
        self.functions = functions
        self.schedule = list(schedule)
        self.fine = bool(fine)
        self.folder = os.path.realpath(folder) + os.sep
        self.turn = [threading.Semaphore(0) for _ in functions]
        self.over = [False] * len(functions)
        self.errors = [None] * len(functions)
        self.left = 0
        self.holder = None
        self.steps = self.switches = 0
        self.lock = threading.Lock()
        self.done = threading.Event()
        self.names = {}

    def _mine(self, code):
        name = code.co_filename
        if name not in self.names:
            self.names[name] = os.path.realpath(name).startswith(self.folder)
        return self.names[name]

    def _next(self, k):
        n = len(self.functions)
        for j in range(1, n + 1):
            if not self.over[(k + j) % n]:
                return (k + j) % n
        return None

    def _give(self, k):
        """The thread after k goes on (called with the lock held)."""
        self.holder = self._next(k)
        self.left = self.schedule.pop(0) if self.schedule else None
        if self.holder is None:
            self.done.set()
        return self.holder

    def _line(self, k):
        with self.lock:
            self.steps += 1
            if self.holder != k:
                return  # it was given up for stuck: it runs freely until its next turn
            if self.left is None:
                return
            self.left -= 1
            if self.left > 0:
                return
            to = self._give(k)
            if to == k or to is None:
                return
            self.switches += 1
        self.turn[to].release()
        self.turn[k].acquire()

    def _run(self, k):
        def local(frame, event, arg):
            if event == ("opcode" if self.fine else "line"):
                self._line(k)
            return local

        def entered(frame, event, arg):
            if not self._mine(frame.f_code):
                return None
            frame.f_trace_opcodes = self.fine
            return local

        self.turn[k].acquire()
        sys.settrace(entered)
        try:
            self.functions[k]()
        except BaseException as e:
            self.errors[k] = e
        finally:
            sys.settrace(None)
            with self.lock:
                self.over[k] = True
                to = self._give(k) if self.holder == k else None
                if all(self.over):
                    self.done.set()
            if to is not None:
                self.turn[to].release()

    def run(self):
        threads = [threading.Thread(target=self._run, args=(k,), daemon=True)
                   for k in range(len(self.functions))]
        for t in threads:
            t.start()
        with self.lock:
            first = self._give(len(threads) - 1)
        self.turn[first].release()
        seen, idle = -1, 0
        while not self.done.wait(STUCK):
            with self.lock:
                idle = idle + 1 if self.steps == seen else 0
                seen = self.steps
                to = None
                if idle and self.holder is not None:
                    to = self._give(self.holder)
            if idle >= BLOCKED / STUCK:
                raise Blocked(f"none of the threads went on for {BLOCKED} s")
            if to is not None:
                self.turn[to].release()
        for t in threads:
            t.join(30)
            if t.is_alive():
                raise HarnessError("a thread did not end")
        return self
