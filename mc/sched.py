"""
A controlled scheduler: tasks run in real threads, one at a time; at every
point where a task may be interrupted the explorer decides who goes on.
"""
import os
import sys
import threading

from . import env
from . import worlds as W

SOURCE = os.path.join(env.REPO, 'symfit') + os.sep
# called by sympy any number of times
# a source line counts as a point of interruption the first few times
LIMIT = 1
SKIP = (os.path.join(SOURCE, 'core', 'argument.py'),)


class Task(object):
    def __init__(self, f, index):
        self.f, self.index = f, index
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.done = False
        self.result = self.error = None
        self.events = 0
        self.reached = {}
        self.switch_at = ()
        self.mode = 'pause'
        self.thread = threading.Thread(target=self.main, daemon=True)

    # in the thread of the task
    def main(self):
        self.go.acquire()
        try:
            W.HOOKS.pause = self.handover if self.mode == 'pause' else None
            if self.mode != 'pause':
                sys.settrace(self.trace)
            try:
                self.result = self.f()
            finally:
                sys.settrace(None)
        except BaseException as err:
            self.error = err
        self.done = True
        self.back.release()

    def handover(self):
        self.back.release()
        self.go.acquire()

    def event(self, frame, kind):
        where = (frame.f_code.co_filename, frame.f_lineno, kind)
        self.reached[where] = self.reached.get(where, 0) + 1
        if self.reached[where] > LIMIT:
            return
        self.events += 1
        if self.events in self.switch_at:
            # not traced while the others run
            self.handover()

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.startswith(SOURCE) or name in SKIP:
            return None
        if self.mode == 'calls':
            self.event(frame, 'call')
            return self.returns
        return self.lines

    def returns(self, frame, event, arg):
        frame.f_trace_lines = False
        if event == 'return':
            self.event(frame, 'return')
        return self.returns

    def lines(self, frame, event, arg):
        if event == 'line':
            self.event(frame, 'line')
        return self.lines

    # in the scheduler
    def step(self):
        self.go.release()
        self.back.acquire()


def start(functions, mode='pause', switches=()):
    tasks = [Task(f, i) for i, f in enumerate(functions)]
    for i, t in enumerate(tasks):
        t.mode = mode
        if i < len(switches):
            t.switch_at = tuple(switches[i])
        t.thread.start()
    return tasks


def count(f, mode):
    """Number of events of a task on its own."""
    t, = start([f], mode)
    t.step()
    assert t.done
    return t.events
