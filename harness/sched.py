"""Deterministic thread schedules: tasks run in threads of their own and hand over to each other after given numbers of
lines of the code under test. A schedule is a list of gaps, used round and round."""
import os
import sys
import threading

import env

ROOT = os.path.join(env.REPO, 'pycose') + '/'
PATIENCE = 0.3      # the running thread seems to wait for a lock that another one holds


class Baton:
    def __init__(self, n, gaps):
        self.cond = threading.Condition()
        self.alive = list(range(n))
        self.turn = 0
        self.gaps = gaps
        self.at = 0
        self.left = gaps[0]
        self.lines = 0
        self.switches = 0

    def wait(self, me):
        """Called with the condition held."""
        while self.turn != me:
            seen = self.lines
            if not self.cond.wait(PATIENCE) and self.lines == seen and self.turn != me:
                self.turn = me      # nobody moves

    def line(self, me):
        with self.cond:
            self.wait(me)
            self.lines += 1
            self.left -= 1
            if self.left > 0:
                return
            self.at += 1
            self.left = self.gaps[self.at % len(self.gaps)]
            if len(self.alive) > 1:
                self.switches += 1
                self.turn = self.next(me)
                self.cond.notify_all()
                self.wait(me)

    def next(self, me):
        later = [i for i in self.alive if i > me]
        return later[0] if later else self.alive[0]

    def done(self, me):
        with self.cond:
            self.alive.remove(me)
            if self.alive and self.turn == me:
                self.turn = self.next(me)
            self.cond.notify_all()


def run(tasks, gaps):
    """The outcomes of the tasks, and how often one of them was interrupted by another."""
    baton = Baton(len(tasks), gaps)
    out = [None] * len(tasks)
    errors = []

    def body(i):
        def local(frame, event, arg):
            if event == 'line':
                baton.line(i)
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(ROOT) else None
        try:
            with baton.cond:
                baton.wait(i)
            sys.settrace(tracer)
            try:
                out[i] = tasks[i]()
            finally:
                sys.settrace(None)
        except BaseException as e:
            errors.append(e)
        finally:
            baton.done(i)
    threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(tasks))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    if errors:
        raise errors[0]
    return out, baton.switches
