"""Controlled scheduler: runs thread bodies on the real code, one line of klang code at a time, and
enumerates every schedule up to a preemption bound.

Scheduling points are the line events inside files of the klang package (so every statement of the
code under test may be preempted before it runs). Operations of C level containers are atomic, as
they are under the interpreter lock.
"""
import os
import sys
import threading

from mc import Violation

REPO = os.environ.get('KLANG_REPO', '/repo')
PREFIX = os.path.join(REPO, 'klang') + os.sep
BLOCK_TIMEOUT = 2.


DIVERGED = []
"""Schedule prefixes that could not be replayed (expected to stay empty)."""


class Divergence(Exception):
    """Replaying a schedule prefix did not reach the same choice points."""


class _Task:
    def __init__(self, index, body):
        self.index = index
        self.body = body
        self.go = threading.Semaphore(0)
        self.done = False
        self.blocked = False
        self.error = None
        self.points = 0


class Execution:
    """One controlled execution of several bodies."""

    def __init__(self, bodies, choices, shouldTrace=None):
        self.tasks = [_Task(i, b) for i, b in enumerate(bodies)]
        self.choices = choices
        self.report = threading.Semaphore(0)
        self.points = []       # (enabled tuple with the running one first, chosen position, forced?)
        self.shouldTrace = shouldTrace or (lambda fn: fn.startswith(PREFIX))

    def _tracer(self, task):
        def make_local():
            last = [None]

            def local(frame, event, arg):
                # The interpreter may report a loop line twice: the same line in a row is one point.
                if event == 'line' and frame.f_lineno != last[0]:
                    last[0] = frame.f_lineno
                    self._pause(task)
                return local

            return local

        def trace(frame, event, arg):
            if event == 'call' and self.shouldTrace(frame.f_code.co_filename):
                return make_local()
            return None

        return trace

    def _pause(self, task):
        task.points += 1
        self.report.release()
        task.go.acquire()

    def _main(self, task):
        task.go.acquire()
        sys.settrace(self._tracer(task))
        try:
            task.body()
        except BaseException as err:  # pylint: disable=broad-except
            task.error = err
        finally:
            sys.settrace(None)
            task.done = True
            self.report.release()

    def run(self):
        threads = [threading.Thread(target=self._main, args=(t,), daemon=True) for t in self.tasks]
        for th in threads:
            th.start()
        running = None
        k = 0
        steps = 0
        while True:
            enabled = [t.index for t in self.tasks if not t.done and not t.blocked]
            if not enabled:
                if all(t.done for t in self.tasks):
                    break
                if self.report.acquire(timeout=20.):
                    for t in self.tasks:
                        t.blocked = False
                    continue
                raise Violation('deadlock: no thread can continue, schedule %s' % (self.choices,))
            if running in enabled:
                enabled.remove(running)
                enabled.insert(0, running)
                preemptable = True
            else:
                preemptable = False
            if len(enabled) > 1:
                pos = self.choices[k] if k < len(self.choices) else 0
                if pos >= len(enabled):
                    raise Divergence('choice %d out of range at point %d' % (pos, k))
                self.points.append((len(enabled), pos, preemptable))
                k += 1
            else:
                pos = 0
            running = enabled[pos]
            task = self.tasks[running]
            task.go.release()
            steps += 1
            if steps > 20000:
                raise Violation('livelock: 20000 steps without an end, schedule %s' % (self.choices,))
            if not self.report.acquire(timeout=BLOCK_TIMEOUT):
                task.blocked = True   # waits for a lock some other thread holds
                continue
            for t in self.tasks:
                if t.blocked and t is not task:
                    t.blocked = False
                    # it may have been released by that step; give it the time to report
                    if not self.report.acquire(timeout=0.05):
                        t.blocked = True
        for th in threads:
            th.join(10.)
        return [t.error for t in self.tasks]


def explore(makeScenario, check, bound, onRun=None):
    """Run every schedule with at most `bound` preemptions.

    makeScenario() -> (bodies, context); check(context, errors, choices) raises on violation.
    Returns number of schedules.
    """
    try:
        import pypyjit
        pypyjit.set_param('off')   # compiled loops report their lines irregularly
    except ImportError:
        pass
    count = 0
    stack = [()]
    while stack:
        prefix = stack.pop()
        bodies, context = makeScenario()
        for _ in range(5):
            try:
                exe = Execution(bodies, prefix)
                errors = exe.run()
                choices = tuple(p[1] for p in exe.points)
                if choices[:len(prefix)] != prefix:
                    raise Divergence('replay of %r diverged' % (prefix,))
                break
            except Divergence:
                bodies, context = makeScenario()
        else:
            DIVERGED.append(prefix)   # machinery problem, never a verdict about the code
            continue
        count += 1
        check(context, errors, choices)
        if onRun:
            onRun(context, exe)
        used = 0
        for i, (n, pos, preemptable) in enumerate(exe.points):
            if i >= len(prefix):
                cost = used + (1 if preemptable else 0)
                if cost <= bound:
                    for alt in range(1, n):
                        stack.append(choices[:i] + (alt,))
            if pos != 0 and preemptable:
                used += 1
    return count
